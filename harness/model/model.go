// Package model holds Go-level models of library functions that the symbolic
// executor cannot interpret directly (they use reflection or the run-time).
// It is never linked into the native replay.
package model

import (
	"go.uber.org/zap"

	"compress/gzip"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"time"
	"unicode/utf8"
)

// Implemented by the executor.
func kindOf(v interface{}) int
func deref(v interface{}) interface{}
func jsonName(v interface{}, i int) string
func unsupported(what string)
func schedChoice(n int) int
func typeName(v interface{}) string
func asUint64(v interface{}) uint64
func bitsOf(v interface{}) int
func isSigned(v interface{}) bool
func asString(v interface{}) string
func asBytes(v interface{}) []byte
func elems(v interface{}) []interface{}
func swap(v interface{}, i, j int)
func sliceLen(v interface{}) int
func storeUint(p interface{}, v uint64)
func ptrElemBits(p interface{}) int
func ptrElems(p interface{}) []interface{}
func assignAs(err error, target interface{}) bool
func isConcrete(s string) bool
func isConcreteInt(u uint64) bool
func fmtUint(u uint64, base int, signed bool) string
func fmtFloat(v interface{}, verb byte, prec int) string
func sleep(d time.Duration)
func sideGet(table string, key interface{}) (interface{}, bool)
func sideSet(table string, key interface{}, v interface{})

const (
	kBool = 1 + iota
	kInt
	kUint
	kFloat
	kString
	kBytes
	kSlice
	kPtr
	kStruct
	kArray
	kMap
	kOther
)

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}

// ---- encoding/binary

func appendBinary(out []byte, order binary.ByteOrder, v interface{}) ([]byte, bool) {
	switch kindOf(v) {
	case kBool, kInt, kUint:
		n := bitsOf(v) / 8
		if n == 0 {
			n = 1
		}
		u := asUint64(v)
		var tmp [8]byte
		switch n {
		case 1:
			tmp[0] = byte(u)
		case 2:
			order.PutUint16(tmp[:], uint16(u))
		case 4:
			order.PutUint32(tmp[:], uint32(u))
		case 8:
			order.PutUint64(tmp[:], u)
		}
		return append(out, tmp[:n]...), true
	case kBytes:
		return append(out, asBytes(v)...), true
	case kStruct, kArray, kSlice:
		ok := true
		for _, e := range elems(v) {
			out, ok = appendBinary(out, order, e)
			if !ok {
				return out, false
			}
		}
		return out, true
	}
	return out, false
}

func BinaryWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	b, ok := appendBinary(nil, order, data)
	if !ok {
		return errors.New("binary.Write: some values are not fixed-sized in type " + typeName(data))
	}
	_, err := w.Write(b)
	return err
}

func binarySize(p interface{}) int {
	if n := ptrElemBits(p); n > 0 {
		return n / 8
	}
	t := 0
	for _, e := range ptrElems(p) {
		n := binarySize(e)
		if n < 0 {
			return -1
		}
		t += n
	}
	return t
}

func readBinary(b []byte, order binary.ByteOrder, p interface{}) []byte {
	switch ptrElemBits(p) {
	case 8:
		storeUint(p, uint64(b[0]))
		return b[1:]
	case 16:
		storeUint(p, uint64(order.Uint16(b)))
		return b[2:]
	case 32:
		storeUint(p, uint64(order.Uint32(b)))
		return b[4:]
	case 64:
		storeUint(p, order.Uint64(b))
		return b[8:]
	}
	for _, e := range ptrElems(p) {
		b = readBinary(b, order, e)
	}
	return b
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	n := binarySize(data)
	if n <= 0 {
		return errors.New("binary.Read: invalid type " + typeName(data))
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	readBinary(b, order, data)
	return nil
}

// ---- fmt

// decimal renders an unsigned number without branching on more than its
// number of digits.
func decimal(u uint64) string {
	if isConcreteInt(u) {
		return fmtUint(u, 10, false)
	}
	n := 1
	lim := uint64(10)
	for n < 20 && u >= lim {
		n++
		if n < 20 {
			lim *= 10
		}
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		q := u / 10
		b[i] = byte(u-q*10) + '0'
		u = q
	}
	return string(b)
}

func hexDigit(d byte, upper bool) byte {
	if d < 10 {
		return '0' + d
	}
	if upper {
		return 'A' + d - 10
	}
	return 'a' + d - 10
}

func hexNum(u uint64, upper bool) string {
	if isConcreteInt(u) && !upper {
		return fmtUint(u, 16, false)
	}
	n := 1
	for n < 16 && u>>(4*uint(n)) != 0 {
		n++
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = hexDigit(byte(u&15), upper)
		u >>= 4
	}
	return string(b)
}

func hexStr(s string, upper bool) string {
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, hexDigit(s[i]>>4, upper), hexDigit(s[i]&15, upper))
	}
	return string(b)
}

type stringer interface{ String() string }

func format(v interface{}, verb byte, plus, sharp bool, prec int, hasPrec bool) string {
	if v == nil {
		if verb == 'v' || verb == 's' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		if !sharp {
			if e, ok := v.(error); ok {
				return quoteIf(e.Error(), verb)
			}
			if s, ok := v.(stringer); ok {
				return quoteIf(s.String(), verb)
			}
		}
	case 'T':
		return typeName(v)
	case 'p':
		return "0xc000012345"
	}
	switch kindOf(v) {
	case kBool:
		if asUint64(v) != 0 {
			return "true"
		}
		return "false"
	case kInt, kUint:
		u := asUint64(v)
		neg := false
		if isSigned(v) && int64(u) < 0 {
			neg = true
			u = -u
		}
		s := ""
		switch verb {
		case 'x':
			s = hexNum(u, false)
		case 'X':
			s = hexNum(u, true)
		case 'o':
			s = fmtUint(u, 8, false)
		case 'b':
			s = fmtUint(u, 2, false)
		case 'c':
			return string(rune(u))
		case 'q':
			return "'" + string(rune(u)) + "'"
		default:
			s = decimal(u)
		}
		if neg {
			return "-" + s
		}
		if plus && verb == 'd' {
			return "+" + s
		}
		return s
	case kFloat:
		p := -1
		if hasPrec {
			p = prec
		} else if verb == 'f' || verb == 'e' {
			p = 6
		}
		if verb == 'v' {
			verb = 'g'
		}
		return fmtFloat(v, verb, p)
	case kString:
		s := asString(v)
		switch verb {
		case 'x':
			return hexStr(s, false)
		case 'X':
			return hexStr(s, true)
		}
		return quoteIf(s, verb)
	case kBytes:
		b := asBytes(v)
		switch verb {
		case 'x':
			return hexStr(string(b), false)
		case 'X':
			return hexStr(string(b), true)
		case 's':
			return string(b)
		case 'q':
			return quoteIf(string(b), 'q')
		}
		fallthrough
	case kSlice, kArray:
		if verb == 'x' && kindOf(v) == kArray {
			return hexStr(string(asBytes(v)), false)
		}
		s := "["
		for i, e := range elems(v) {
			if i > 0 {
				s += " "
			}
			s += format(e, verb, plus, sharp, prec, hasPrec)
		}
		return s + "]"
	case kStruct:
		s := "{"
		for i, e := range elems(v) {
			if i > 0 {
				s += " "
			}
			s += format(e, verb, plus, sharp, prec, hasPrec)
		}
		return s + "}"
	}
	return "&{" + typeName(v) + "}"
}

func quoteIf(s string, verb byte) string {
	switch verb {
	case 'q':
		return "\"" + s + "\""
	case 'x':
		return hexStr(s, false)
	case 'X':
		return hexStr(s, true)
	}
	return s
}

func Sprintf(f string, args ...interface{}) string {
	out := ""
	argi := 0
	i := 0
	for i < len(f) {
		j := i
		for j < len(f) && f[j] != '%' {
			j++
		}
		out += f[i:j]
		if j >= len(f) {
			break
		}
		i = j + 1
		minus, plus, sharp, zero := false, false, false, false
	flags:
		for i < len(f) {
			switch f[i] {
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case ' ':
			default:
				break flags
			}
			i++
		}
		width, prec, hasPrec := 0, 0, false
		if i < len(f) && f[i] == '*' {
			width = int(asUint64(args[argi]))
			argi++
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			hasPrec = true
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out += "%!(NOVERB)"
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if argi >= len(args) {
			out += "%!" + string(verb) + "(MISSING)"
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		s := format(args[argi], verb, plus, sharp, prec, hasPrec)
		argi++
		if hasPrec && verb == 's' && len(s) > prec {
			s = s[:prec]
		}
		for len(s) < width {
			switch {
			case minus:
				s += " "
			case zero && len(s) > 0 && s[0] == '-':
				s = "-0" + s[1:]
			case zero:
				s = "0" + s
			default:
				s = " " + s
			}
		}
		out += s
	}
	return out
}

func Sprint(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 && kindOf(a) != kString && kindOf(args[i-1]) != kString {
			s += " "
		}
		s += format(a, 'v', false, false, 0, false)
	}
	return s
}

func Sprintln(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += format(a, 'v', false, false, 0, false)
	}
	return s + "\n"
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

// Errorf keeps the wrapped error; messages are not the subject of any
// property, so they are not formatted.
func Errorf(f string, args ...interface{}) error {
	argi := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			i++
			for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == '.' || f[i] >= '0' && f[i] <= '9') {
				i++
			}
			if i < len(f) && f[i] == 'w' && argi < len(args) {
				if e, ok := args[argi].(error); ok {
					return &wrapError{f, e}
				}
			}
			if i < len(f) && f[i] != '%' {
				argi++
			}
		}
	}
	return errors.New(f)
}

func Fprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	return io.WriteString(w, Sprintf(f, args...))
}

func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return io.WriteString(w, Sprintln(args...))
}

func Fprint(w io.Writer, args ...interface{}) (int, error) {
	return io.WriteString(w, Sprint(args...))
}

func Printf(f string, args ...interface{}) (int, error) { return 0, nil }
func Println(args ...interface{}) (int, error)          { return 0, nil }

// ---- sort

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

// ---- errors

func ErrorsIs(err, target error, comparable bool) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if comparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if assignAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// ---- time

type timerState struct {
	gen  int
	live bool
	c    chan time.Time
	f    func()
}

func startTimer(st *timerState, d time.Duration) {
	st.gen++
	st.live = true
	gen := st.gen
	go func() {
		sleep(d)
		if st.live && st.gen == gen {
			st.live = false
			if st.f != nil {
				st.f()
			} else {
				select {
				case st.c <- time.Now():
				default:
				}
			}
		}
	}()
}

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

func TimeNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	st := &timerState{c: c}
	sideSet("timer", t, st)
	startTimer(st, d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	st := &timerState{f: f}
	sideSet("timer", t, st)
	startTimer(st, d)
	return t
}

func TimerStop(t *time.Timer) bool {
	v, _ := sideGet("timer", t)
	st := v.(*timerState)
	was := st.live
	st.live = false
	return was
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	v, _ := sideGet("timer", t)
	st := v.(*timerState)
	was := st.live
	startTimer(st, d)
	return was
}

func TimeNewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	st := &timerState{c: c, live: true}
	sideSet("ticker", t, st)
	go func() {
		for st.live {
			sleep(d)
			if st.live {
				select {
				case c <- time.Now():
				default:
				}
			}
		}
	}()
	return t
}

func TickerStop(t *time.Ticker) {
	v, _ := sideGet("ticker", t)
	v.(*timerState).live = false
}

func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// ---- sync.Map

type smap struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func smapOf(m *sync.Map) map[interface{}]interface{} {
	v, ok := sideGet("syncmap", m)
	if !ok {
		n := map[interface{}]interface{}{}
		sideSet("syncmap", m, n)
		return n
	}
	return v.(map[interface{}]interface{})
}

func SyncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smapOf(m)[k]
	return v, ok
}
func SyncMapStore(m *sync.Map, k, v interface{}) { smapOf(m)[k] = v }
func SyncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	t := smapOf(m)
	if old, ok := t[k]; ok {
		return old, true
	}
	t[k] = v
	return v, false
}
func SyncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	t := smapOf(m)
	v, ok := t[k]
	delete(t, k)
	return v, ok
}
func SyncMapDelete(m *sync.Map, k interface{}) { delete(smapOf(m), k) }
func SyncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range smapOf(m) {
		if !f(k, v) {
			return
		}
	}
}

// ---- net/http

// HTTPClientDo sends the request through the client's transport, without
// redirects, cookies or timeouts.
func HTTPClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		return nil, errors.New("http: no transport in the model")
	}
	if c.Timeout > 0 {
		req = req.WithContext(&deadline{req.Context(), time.Now().Add(c.Timeout)})
	}
	return t.RoundTrip(req)
}

// deadline is a context that names its deadline and does not keep it.
type deadline struct {
	context.Context
	at time.Time
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

// HTTPTransportRoundTrip dials the address of the request. It covers
// connections that cannot be made only.
func HTTPTransportRoundTrip(t *http.Transport, req *http.Request) (*http.Response, error) {
	port := req.URL.Port()
	if port == "" {
		port = "80"
		if req.URL.Scheme == "https" {
			port = "443"
		}
	}
	if t.DialContext == nil {
		unsupported("dialing without a dialer")
	}
	_, err := t.DialContext(req.Context(), "tcp", net.JoinHostPort(req.URL.Hostname(), port))
	if err == nil {
		unsupported("sending a request over a connection")
	}
	return nil, err
}

// ---- encoding/json

// JSONMarshal covers structs, pointers, slices, strings, integers and
// booleans.
func JSONMarshal(v interface{}) ([]byte, error) {
	return []byte(jsonValue(v)), nil
}

const hexDigits = "0123456789abcdef"

func jsonString(s string) string {
	out := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			i++
			switch {
			case c == '"' || c == '\\':
				out = append(out, '\\', c)
			case c == '\b':
				out = append(out, '\\', 'b')
			case c == '\f':
				out = append(out, '\\', 'f')
			case c == '\n':
				out = append(out, '\\', 'n')
			case c == '\r':
				out = append(out, '\\', 'r')
			case c == '\t':
				out = append(out, '\\', 't')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				out = append(out, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
			default:
				out = append(out, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			out = append(out, "\\ufffd"...)
		case r == 0x2028:
			out = append(out, "\\u2028"...)
		case r == 0x2029:
			out = append(out, "\\u2029"...)
		default:
			out = append(out, s[i:i+n]...)
		}
		i += n
	}
	return string(append(out, '"'))
}

func jsonValue(v interface{}) string {
	if v == nil {
		return "null"
	}
	switch kindOf(v) {
	case kBool:
		if asUint64(v) != 0 {
			return "true"
		}
		return "false"
	case kInt, kUint:
		u := asUint64(v)
		if isSigned(v) && int64(u) < 0 {
			return "-" + decimal(-u)
		}
		return decimal(u)
	case kString:
		return jsonString(asString(v))
	case kPtr:
		return jsonValue(deref(v))
	case kStruct:
		s := "{"
		first := true
		for i, e := range elems(v) {
			name := jsonName(v, i)
			if name == "" {
				continue
			}
			if !first {
				s += ","
			}
			first = false
			s += "\"" + name + "\":" + jsonValue(e)
		}
		return s + "}"
	case kSlice:
		s := "["
		for i, e := range elems(v) {
			if i > 0 {
				s += ","
			}
			s += jsonValue(e)
		}
		return s + "]"
	}
	unsupported("json of " + typeName(v))
	return ""
}

// valueCtx stands for the context of context.WithValue.
type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func ContextWithValue(parent context.Context, key, val interface{}) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

// Shuffle takes the elements in any order.
func RandShuffle(r *rand.Rand, n int, swap func(i, j int)) { Shuffle(n, swap) }

func Shuffle(n int, swap func(i, j int)) {
	for i := 0; i < n-1; i++ {
		if j := i + schedChoice(n-i); j != i {
			swap(i, j)
		}
	}
}

// ---- compress/gzip

// The model of gzip keeps the header and stores the data as it is, preceded
// by its length.

type gz struct {
	w      io.Writer
	data   []byte
	closed bool
}

func GzipNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	z := new(gzip.Writer)
	sideSet("gzip", z, &gz{w: w})
	return z, nil
}

func GzipNewWriter(w io.Writer) *gzip.Writer {
	z, _ := GzipNewWriterLevel(w, 6)
	return z
}

func gzOf(z interface{}) *gz {
	v, ok := sideGet("gzip", z)
	if !ok {
		unsupported("gzip without a constructor")
	}
	return v.(*gz)
}

func GzipWrite(z *gzip.Writer, p []byte) (int, error) {
	g := gzOf(z)
	if g.closed {
		return 0, errors.New("gzip: write to closed writer")
	}
	g.data = append(g.data, p...)
	return len(p), nil
}

func GzipFlush(z *gzip.Writer) error { return nil }

func GzipClose(z *gzip.Writer) error {
	g := gzOf(z)
	if g.closed {
		return nil
	}
	g.closed = true
	n := len(g.data)
	hdr := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 2, 0xff, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	if _, err := g.w.Write(hdr); err != nil {
		return err
	}
	if n > 0 {
		if _, err := g.w.Write(g.data); err != nil {
			return err
		}
	}
	return nil
}

func GzipNewReader(r io.Reader) (*gzip.Reader, error) {
	var hdr [14]byte
	if _, err := io.ReadFull(r, hdr[:10]); err != nil {
		return nil, err
	}
	if hdr[0] != 0x1f || hdr[1] != 0x8b || hdr[2] != 8 {
		return nil, gzip.ErrHeader
	}
	z := new(gzip.Reader)
	g := &gz{}
	sideSet("gzip", z, g)
	if _, err := io.ReadFull(r, hdr[10:]); err != nil {
		g.closed = true
		return z, nil
	}
	n := int(hdr[10]) | int(hdr[11])<<8 | int(hdr[12])<<16 | int(hdr[13])<<24
	for len(g.data) < n {
		m := n - len(g.data)
		if m > 4096 {
			m = 4096
		}
		b := make([]byte, m)
		k, err := r.Read(b)
		g.data = append(g.data, b[:k]...)
		if err != nil && len(g.data) < n {
			g.closed = true
			break
		}
	}
	return z, nil
}

func GzipRead(z *gzip.Reader, p []byte) (int, error) {
	g := gzOf(z)
	if len(g.data) == 0 {
		if g.closed {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, g.data)
	g.data = g.data[n:]
	return n, nil
}

func GzipReaderClose(z *gzip.Reader) error { return nil }

// dirent has the layout of fuseutil.Dirent.
type dirent struct {
	Offset uint64
	Inode  uint64
	Name   string
	Type   uint32
}

// WriteDirent lays out a directory entry for the kernel.
func WriteDirent(buf []byte, d dirent) int {
	total := (24 + len(d.Name) + 7) / 8 * 8
	if total > len(buf) {
		return 0
	}
	for i := 0; i < 8; i++ {
		buf[i] = byte(d.Inode >> uint(8*i))
		buf[8+i] = byte(d.Offset >> uint(8*i))
	}
	for i := 0; i < 4; i++ {
		buf[16+i] = byte(len(d.Name) >> uint(8*i))
		buf[20+i] = byte(d.Type >> uint(8*i))
	}
	copy(buf[24:], d.Name)
	for i := 24 + len(d.Name); i < total; i++ {
		buf[i] = 0
	}
	return total
}

// ZapFatal ends the program.
func ZapFatal(l *zap.Logger, msg string, fields ...zap.Field) {
	panic("fatal: " + msg)
}
