package gopoet_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/jhump/gopoet"
)

func TestReplayC04(t *testing.T) {
	r := newReplay(t, "accessors of every constructed type, invalid constructor arguments, accessor results changed by the caller")
	// invalid arguments
	i8 := gopoet.Int8Type
	str := gopoet.StringType
	bad := func(what string, want bool, f func() gopoet.TypeName) {
		r.tried(what)
		var got gopoet.TypeName
		p := catch(func() { got = f() })
		if (p != nil) != want {
			r.fail("%s: panicked with %v, result %v, should panic: %v", what, p, got, want)
		}
	}
	for k := reflect.Kind(0); k <= reflect.UnsafePointer+3; k++ {
		k := k
		want := true
		for _, b := range basicKinds {
			want = want && b != k
		}
		if k == reflect.UnsafePointer {
			continue
		}
		bad(fmt.Sprintf("BasicType(%v)", k), want, func() gopoet.TypeName { return gopoet.BasicType(k) })
	}
	bad("PointerType(nil)", true, func() gopoet.TypeName { return gopoet.PointerType(nil) })
	bad("SliceType(nil)", true, func() gopoet.TypeName { return gopoet.SliceType(nil) })
	bad("ArrayType(nil, 3)", true, func() gopoet.TypeName { return gopoet.ArrayType(nil, 3) })
	for _, n := range []int64{-1 << 63, -2, -1, 0, 1, 1<<63 - 1} {
		n := n
		bad(fmt.Sprintf("ArrayType(int8, %d)", n), n < 0, func() gopoet.TypeName { return gopoet.ArrayType(i8, n) })
	}
	bad("MapType(nil, int8)", true, func() gopoet.TypeName { return gopoet.MapType(nil, i8) })
	bad("MapType(int8, nil)", true, func() gopoet.TypeName { return gopoet.MapType(i8, nil) })
	bad("ChannelType(nil, both)", true, func() gopoet.TypeName { return gopoet.ChannelType(nil, reflect.BothDir) })
	for d := reflect.ChanDir(-2); d < 9; d++ {
		d := d
		bad(fmt.Sprintf("ChannelType(int8, %d)", d), d < 0 || d > 3, func() gopoet.TypeName { return gopoet.ChannelType(i8, d) })
	}
	if d := gopoet.ChannelType(i8, 0).Dir(); d != reflect.BothDir {
		r.fail("ChannelType(int8, 0) has direction %v", d)
	}
	lists := map[string][]gopoet.ArgType{"none": nil, "int8": {{Name: "x", Type: i8}}, "nil": {{Name: "x"}}, "int8,nil": {{Type: i8}, {}}, "nil,int8": {{}, {Type: i8}},
		"[]string": {{Type: gopoet.SliceType(str)}}, "[]string,int8": {{Type: gopoet.SliceType(str)}, {Type: i8}}, "int8,[]string": {{Type: i8}, {Type: gopoet.SliceType(str)}},
		"nil,[]string": {{}, {Type: gopoet.SliceType(str)}}, "[2]string": {{Type: gopoet.ArrayType(str, 2)}}}
	lastSlice := map[string]bool{"[]string": true, "int8,[]string": true}
	hasNil := map[string]bool{"nil": true, "int8,nil": true, "nil,int8": true, "nil,[]string": true}
	for an, a := range lists {
		for rn, res := range lists {
			a, res := a, res
			for _, v := range []bool{false, true} {
				v := v
				want := hasNil[an] || hasNil[rn] || v && !lastSlice[an]
				bad(fmt.Sprintf("FuncTypeFromSig(args %s, results %s, variadic %v)", an, rn, v), want, func() gopoet.TypeName {
					return gopoet.FuncTypeFromSig(&gopoet.Signature{Args: a, Results: res, IsVariadic: v})
				})
				bad(fmt.Sprintf("FuncType or FuncTypeVariadic(args %s, results %s, variadic %v)", an, rn, v), want, func() gopoet.TypeName {
					if v {
						return gopoet.FuncTypeVariadic(a, res)
					}
					return gopoet.FuncType(a, res)
				})
			}
		}
	}
	for i := 0; i < 3000*r.scale && !r.late(); i++ {
		d := r.genD(3)
		r.tried(d.text())
		var ty gopoet.TypeName
		if p := catch(func() { ty = d.build() }); p != nil {
			r.fail("constructing %s panicked: %v", d.text(), p)
		}
		if s := d.diff(ty, nil); s != "" {
			r.fail("constructed %s: %s", d.text(), s)
		}
		// the lists handed out are copies
		for _, f := range [][]gopoet.FieldType{ty.Fields()} {
			for j := range f {
				f[j] = gopoet.FieldType{Name: "changed", Type: i8, Tag: "changed"}
			}
			_ = append(f, gopoet.FieldType{Name: "more"})
		}
		ms := ty.Methods()
		for j := range ms {
			ms[j].Name = "changed"
			ms[j].Signature.IsVariadic = !ms[j].Signature.IsVariadic
			ms[j].Signature.Args = nil
		}
		es := ty.Embeds()
		for j := range es {
			es[j].Name = "changed"
		}
		if s := d.diff(ty, nil); s != "" {
			r.fail("constructed %s, then changed the lists its accessors returned: %s", d.text(), s)
		}
	}
}
