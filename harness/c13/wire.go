//go:build go1.22

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/vh/monx"
)

// message is a report as it is on the wire, by the numbers of the protocol.
type message struct {
	id, host              string
	out, err              []string
	success               bool
	maxMemory             uint64
	killed                bool
	killReason            uint64
	created               []monx.File
	reason                uint64
	start, finish         int64
	duration              string
	code                  int32
	codeValid             bool
	messages              []string
	matches               []monx.Match
	command               string
	config                map[string]interface{}
	createdAt             int64
	rawConfig, rawMatches []byte
}

const (
	success = 1 + iota
	failure
	alert
	alertRate
	memoryWarning
	timeWarning
	fileNotCreated
	killed
	started
)

var reasonNames = []string{"?", "success", "failure", "alert", "rate alert", "memory warning", "time warning", "file not created", "killed", "start"}

func (m *message) name() string {
	if m.reason < uint64(len(reasonNames)) {
		return reasonNames[m.reason]
	}
	return fmt.Sprint("reason ", m.reason)
}

// decode reads the protocol buffer encoding.
func decode(b []byte) *message {
	m := &message{}
	bad := func(f string, a ...interface{}) {
		mc.Fail("wire", "a report of %d bytes: "+f, append([]interface{}{len(b)}, a...)...)
	}
	rest := b
	varint := func() uint64 {
		v, n := binary.Uvarint(rest)
		if n <= 0 {
			bad("bad number")
		}
		rest = rest[n:]
		return v
	}
	for len(rest) > 0 {
		tag := varint()
		f, typ := tag>>3, tag&7
		var n uint64
		var s []byte
		switch typ {
		case 0:
			n = varint()
		case 2:
			l := varint()
			if l > uint64(len(rest)) {
				bad("field %d is too long", f)
			}
			s, rest = rest[:l], rest[l:]
		default:
			bad("field %d has type %d", f, typ)
		}
		isNumber := f >= 5 && f <= 8 || f >= 10 && f <= 12 || f == 14 || f == 15 || f == 20
		if isNumber != (typ == 0) || f == 0 || f > 20 {
			bad("field %d has type %d", f, typ)
		}
		if !isNumber && f != 9 && f != 17 && f != 19 && !utf8.Valid(s) {
			bad("field %d is not text: %q", f, s)
		}
		read := func(v interface{}) {
			if err := json.Unmarshal(s, v); err != nil {
				bad("field %d: %v: %q", f, err, s)
			}
		}
		switch f {
		case 1:
			m.id = string(s)
		case 2:
			m.host = string(s)
		case 3:
			m.out = append(m.out, string(s))
		case 4:
			m.err = append(m.err, string(s))
		case 5:
			m.success = n != 0
		case 6:
			m.maxMemory = n
		case 7:
			m.killed = n != 0
		case 8:
			m.killReason = n
		case 9:
			read(&m.created)
		case 10:
			m.reason = n
		case 11:
			m.start = int64(n)
		case 12:
			m.finish = int64(n)
		case 13:
			m.duration = string(s)
		case 14:
			m.code = int32(n)
		case 15:
			m.codeValid = n != 0
		case 16:
			m.messages = append(m.messages, string(s))
		case 17:
			m.rawMatches = s
			read(&m.matches)
		case 18:
			m.command = string(s)
		case 19:
			m.rawConfig = s
			read(&m.config)
		case 20:
			m.createdAt = int64(n)
		}
	}
	return m
}

// norm makes replaced text comparable: what is not UTF-8 may be replaced
// byte by byte or at once.
func norm(s string) string {
	s = strings.ToValidUTF8(s, "\ufffd")
	for strings.Contains(s, "\ufffd\ufffd") {
		s = strings.ReplaceAll(s, "\ufffd\ufffd", "\ufffd")
	}
	return s
}

func same(a []string, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if norm(strings.TrimRight(a[i], "\r")) != norm(strings.TrimRight(b[i], "\r")) {
			return false
		}
	}
	return true
}

// last are the last n lines.
func last(l []string, n int) []string {
	if n < 0 {
		n = 0
	}
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// unfinished is the finish of a run that goes on.
var unfinished = time.Time{}.Unix()
