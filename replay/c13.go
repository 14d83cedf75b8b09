package gopoet_test

import (
	"fmt"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

func TestReplayC13(t *testing.T) {
	r := newReplay(t, "every code point as first character, several continuations, and invalid UTF-8 prefixes")
	check := func(s string) {
		rs := []rune(s)
		bad := s != "" && func() bool { c, n := utf8.DecodeRuneInString(s); return c == utf8.RuneError && n <= 1 }()
		var un, ex string
		p1 := catch(func() { un = gopoet.Unexport(s) })
		p2 := catch(func() { ex = gopoet.Export(s) })
		if bad {
			if p1 == nil || p2 == nil {
				r.fail("%q starts with invalid UTF-8 but Unexport gave %q (panic %v), Export %q (panic %v)", s, un, p1, ex, p2)
			}
			return
		}
		if p1 != nil || p2 != nil {
			r.fail("%q: Unexport panic %v, Export panic %v", s, p1, p2)
		}
		wu, we := "", ""
		if s != "" {
			tail := s[utf8.RuneLen(rs[0]):]
			wu = string(unicode.ToLower(rs[0])) + tail
			switch {
			case unicode.IsUpper(rs[0]):
				we = s
			case unicode.IsUpper(unicode.ToUpper(rs[0])):
				we = string(unicode.ToUpper(rs[0])) + tail
			case rs[0] == '_':
				we = "X" + tail
			default:
				we = "X" + s
			}
		}
		if un != wu {
			r.fail("Unexport(%q) = %q, want %q", s, un, wu)
		}
		if ex != we {
			r.fail("Export(%q) = %q, want %q", s, ex, we)
		}
	}
	check("")
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		for _, tail := range []string{"", "a", "Bc_9", "é\xff"} {
			check(string(c) + tail)
			r.n++
		}
	}
	for b := 0x80; b < 0x100; b++ {
		for _, tail := range []string{"", "a", "\x80", "\xff"} {
			s := string([]byte{byte(b)}) + tail
			check(s)
			r.tried(fmt.Sprintf("%q", s))
		}
	}
}
