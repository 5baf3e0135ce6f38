// Package model is the reference model: schemas and values which do not depend on the library under test.
package model

import (
	"fmt"
	"math"
	"strings"
)

type Kind int

const (
	Boolean Kind = iota
	Byte
	Short
	Int
	Long
	Float
	Double
	String
	Binary
	Timestamp
	List
	Map
	Struct
	Union
	Decimal
	Date
	Varchar
	Char
)

var kindNames = []string{"boolean", "tinyint", "smallint", "int", "bigint", "float", "double", "string", "binary",
	"timestamp", "list", "map", "struct", "union", "decimal", "date", "varchar", "char"}

func (k Kind) String() string { return kindNames[k] }

type Enc int

const (
	Direct Enc = iota
	Dictionary
	DirectV2
	DictionaryV2
)

type Type struct {
	Kind     Kind
	Nullable bool
	Enc      Enc
	Names    []string
	Kids     []*Type

	ID uint32
}

// Number gives ids in pre-order
func (t *Type) Number() *Type {
	var id uint32
	var walk func(t *Type)
	walk = func(t *Type) {
		t.ID = id
		id++
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	return t
}

// Flat lists types in pre-order
func (t *Type) Flat() []*Type {
	l := []*Type{t}
	for _, k := range t.Kids {
		l = append(l, k.Flat()...)
	}
	return l
}

func (t *Type) Clone() *Type {
	c := *t
	c.Names = append([]string(nil), t.Names...)
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

func (t *Type) String() string {
	var sb strings.Builder
	sb.WriteString(t.Kind.String())
	if t.Enc == DictionaryV2 {
		sb.WriteString(":dict")
	}
	if t.Nullable {
		sb.WriteString("?")
	}
	if len(t.Kids) != 0 || t.Kind == Struct {
		sb.WriteString("<")
		for i, k := range t.Kids {
			if i != 0 {
				sb.WriteString(",")
			}
			sb.WriteString(k.String())
		}
		sb.WriteString(">")
	}
	return sb.String()
}

// DefaultEnc is the encoding of a kind which is not by dictionary
func DefaultEnc(k Kind) Enc {
	switch k {
	case Boolean, Byte, Float, Double, Struct, Union:
		return Direct
	}
	return DirectV2
}

// Val is nil for null, or bool, byte, int16, int32, int64, F32, F64, string, Bin, Dec, Day, TS, Row, Lst, Mp
type Val interface{}

type F32 uint32
type F64 uint64
type Bin string
type Dec struct {
	U int64
	S int
}
type Day int32
type TS struct {
	S int64 // from 2015-01-01 in the location
	N uint32
}
type Row []Val
type Lst []Val
type Mp struct{ K, V []Val }

func (f F32) String() string {
	return fmt.Sprintf("%v(%08x)", math.Float32frombits(uint32(f)), uint32(f))
}
func (f F64) String() string {
	return fmt.Sprintf("%v(%016x)", math.Float64frombits(uint64(f)), uint64(f))
}

func EqualAll(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func Equal(a, b Val) bool {
	switch x := a.(type) {
	case Row:
		y, ok := b.(Row)
		return ok && EqualAll(x, y)
	case Lst:
		y, ok := b.(Lst)
		return ok && EqualAll(x, y)
	case Mp:
		y, ok := b.(Mp)
		return ok && EqualAll(x.K, y.K) && EqualAll(x.V, y.V)
	}
	switch b.(type) {
	case Row, Lst, Mp:
		return false
	}
	return a == b
}

// Diff is the path and values of the first difference, or empty
func Diff(a, b Val) string {
	if Equal(a, b) {
		return ""
	}
	if x, ok := a.(Row); ok {
		if y, ok := b.(Row); ok && len(x) == len(y) {
			for i := range x {
				if d := Diff(x[i], y[i]); d != "" {
					return fmt.Sprintf(".%d%s", i, d)
				}
			}
		}
	}
	if x, ok := a.(Lst); ok {
		if y, ok := b.(Lst); ok && len(x) == len(y) {
			for i := range x {
				if d := Diff(x[i], y[i]); d != "" {
					return fmt.Sprintf("[%d]%s", i, d)
				}
			}
		}
	}
	return fmt.Sprintf(": expected %s, got %s", Show(a), Show(b))
}

// DiffRows tells the first different row
func DiffRows(want, got []Val) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if d := Diff(want[i], got[i]); d != "" {
			return fmt.Sprintf("row %d%s", i, d)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("expected %d rows, got %d", len(want), len(got))
	}
	return ""
}

func Show(v Val) string {
	s := fmt.Sprintf("%#v", v)
	switch x := v.(type) {
	case nil:
		s = "null"
	case string:
		s = fmt.Sprintf("%q", x)
	case F32:
		s = x.String()
	case F64:
		s = x.String()
	case Dec:
		s = fmt.Sprintf("decimal %d scale %d", x.U, x.S)
	case TS:
		s = fmt.Sprintf("timestamp %d.%09d", x.S, x.N)
	}
	if len(s) > 160 {
		s = s[:160] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// Hash is FNV-1a of the value's content, for counting distinct cases
func Hash(h uint64, v Val) uint64 {
	switch x := v.(type) {
	case Row:
		h = mix(h, 11)
		for _, e := range x {
			h = Hash(h, e)
		}
		return h
	case Lst:
		h = mix(h, 12)
		for _, e := range x {
			h = Hash(h, e)
		}
		return mix(h, 99)
	case Mp:
		h = mix(h, 13)
		for i := range x.K {
			h = Hash(Hash(h, x.K[i]), x.V[i])
		}
		return mix(h, 99)
	case nil:
		return mix(h, 1)
	case bool:
		if x {
			return mix(h, 3)
		}
		return mix(h, 2)
	case byte:
		return mix(h, uint64(x))
	case int16:
		return mix(h, uint64(x))
	case int32:
		return mix(h, uint64(x))
	case int64:
		return mix(h, uint64(x))
	case F32:
		return mix(h, uint64(x))
	case F64:
		return mix(h, uint64(x))
	case string:
		return hashString(h, x)
	case Bin:
		return hashString(h, string(x))
	case Dec:
		return mix(mix(h, uint64(x.U)), uint64(x.S))
	case Day:
		return mix(h, uint64(x))
	case TS:
		return mix(mix(h, uint64(x.S)), uint64(x.N))
	}
	panic(fmt.Sprintf("hash of %T", v))
}

const HashInit = uint64(14695981039346656037)

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	return h
}

func hashString(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h, uint64(len(s)))
}

// Project keeps included columns only, nil is all
func Project(t *Type, inc map[uint32]bool) *Type {
	c := *t
	c.Kids, c.Names = nil, nil
	for i, k := range t.Kids {
		if inc[k.ID] {
			c.Kids = append(c.Kids, Project(k, inc))
			if i < len(t.Names) {
				c.Names = append(c.Names, t.Names[i])
			}
		}
	}
	return &c
}

// ProjectVal keeps included columns of a value
func ProjectVal(t *Type, v Val, inc map[uint32]bool) Val {
	if v == nil {
		return nil
	}
	switch t.Kind {
	case Struct:
		r := Row{}
		for i, k := range t.Kids {
			if inc[k.ID] {
				r = append(r, ProjectVal(k, v.(Row)[i], inc))
			}
		}
		return r
	case List:
		l := Lst{}
		for _, e := range v.(Lst) {
			l = append(l, ProjectVal(t.Kids[0], e, inc))
		}
		return l
	case Map:
		m := Mp{}
		for i := range v.(Mp).K {
			m.K = append(m.K, ProjectVal(t.Kids[0], v.(Mp).K[i], inc))
			m.V = append(m.V, ProjectVal(t.Kids[1], v.(Mp).V[i], inc))
		}
		return m
	}
	return v
}
