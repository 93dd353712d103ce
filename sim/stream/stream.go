// Package stream simulates everything around a split function: the sender and
// its faults (what each Read returns and when), and the consumers (the real
// bufio.Scanner with any buffer, a hand-written push parser that recycles and
// moves its buffers, and a plain loop over bytes in memory).
package stream

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"net"
	"os"
	"runtime"
	"slices"
	"syscall"
	"unsafe"

	"verifsim/hook"
	"verifsim/rng"
)

type Split = bufio.SplitFunc

// Ev is one delivery: Zero empty reads, then up to N bytes, after Delay ms.
type Ev struct {
	N     int `json:"n"`
	Zero  int `json:"z,omitempty"`
	Delay int `json:"d,omitempty"`
}

// How the sender ends.
const (
	EOF      = ""         // (0, io.EOF) after the last byte
	EOFData  = "eof+data" // io.EOF together with the last bytes
	Err      = "err"      // (0, error)
	ErrData  = "err+data" // error together with the last bytes
	ErrUnexp = "unexpected-eof"
	Stuck    = "stuck" // empty reads for ever
)

// Delivery is one complete environment of a stream.
type Delivery struct {
	Script   []Ev   `json:"script,omitempty"` // when used up: the rest in one piece
	End      string `json:"end,omitempty"`
	Why      string `json:"why,omitempty"` // which error, for err and err+data
	FailAt   int    `json:"fail_at"`       // bytes delivered before the end; <0: all
	Scribble bool   `json:"scribble,omitempty"`
	Cons     string `json:"cons"`            // scanner, push, whole
	Cap      int    `json:"cap,omitempty"`   // scanner's initial buffer (0: the scanner's default)
	Max      int    `json:"max,omitempty"`   // scanner's limit (with Cap 0: default limit)
	CSeed    uint64 `json:"cseed,omitempty"` // decisions of the push consumer
}

var ErrInjected = errors.New("injected read error")

// Whys are errors that readers really give; none of them is the end.
var Whys = map[string]error{
	"closed-pipe": io.ErrClosedPipe, "closed": fs.ErrClosed, "net-closed": net.ErrClosed, "deadline": os.ErrDeadlineExceeded, "canceled": context.Canceled, "timeout": context.DeadlineExceeded,
	"short-buffer": io.ErrShortBuffer, "no-progress": io.ErrNoProgress, "unexpected": fmt.Errorf("decompressing: %w", io.ErrUnexpectedEOF),
	"EIO": path(syscall.EIO), "EAGAIN": path(syscall.EAGAIN), "EINTR": path(syscall.EINTR), "ESTALE": path(syscall.ESTALE), "ECONNRESET": path(syscall.ECONNRESET), "ETIMEDOUT": path(syscall.ETIMEDOUT),
	"text-eof": errors.New("EOF"), "not-exist": path(syscall.ENOENT), "invalid": fs.ErrInvalid,
}

func path(e error) error { return &fs.PathError{Op: "read", Path: "ucd.txt", Err: e} }

// WhyNames are their names, in a fixed order.
var WhyNames = slices.Sorted(maps.Keys(Whys))

func (d *Delivery) EndErr() error {
	switch d.End {
	case Err, ErrData:
		if e := Whys[d.Why]; e != nil {
			return e
		}
		return ErrInjected
	case ErrUnexp:
		return io.ErrUnexpectedEOF
	case Stuck:
		return io.ErrNoProgress
	}
	return nil
}

// Delivered is the number of bytes of an n-byte text that d delivers.
func (d *Delivery) Delivered(n int) int {
	if d.FailAt >= 0 && d.FailAt < n {
		return d.FailAt
	}
	return n
}

// Reader is the simulated sender.
type Reader struct {
	text   []byte
	d      *Delivery
	pos    int
	zero   int
	left   int // of the current event
	off    int
	Reads  int
	Zeros  int
	Ms     int
	Ended  bool
	OnRead func(delivered int) // the consumer asks for more: everything delivered so far has been seen by it
	junk   *rng.R
	Fault  map[string]int
}

func NewReader(text []byte, d *Delivery) *Reader {
	r := &Reader{text: text[:d.Delivered(len(text))], d: d, Fault: map[string]int{}}
	if d.Scribble {
		r.junk = rng.New(uint64(len(text)), d.CSeed, 7)
	}
	r.load()
	return r
}

// Delivered is what the sender has handed over so far.
func (r *Reader) Delivered() []byte { return r.text[:r.off] }

func (r *Reader) load() {
	if r.pos < len(r.d.Script) {
		e := r.d.Script[r.pos]
		r.pos++
		r.zero, r.left = min(e.Zero, 60), e.N
		r.Ms += e.Delay
	} else {
		r.zero, r.left = 0, len(r.text)
	}
}

func (r *Reader) Read(p []byte) (int, error) {
	if r.OnRead != nil {
		r.OnRead(r.off)
	}
	hook.Pass()
	r.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if r.off == len(r.text) {
		return r.end()
	}
	for r.left <= 0 && r.zero <= 0 {
		r.load()
	}
	if r.zero > 0 {
		r.zero--
		r.Zeros++
		r.Fault["empty-read"]++
		r.scribble(p)
		return 0, nil
	}
	n := min(r.left, len(p), len(r.text)-r.off)
	copy(p, r.text[r.off:r.off+n])
	r.scribble(p[n:])
	r.off += n
	r.left -= n
	if n < len(p) && r.off < len(r.text) {
		r.Fault["short-read"]++
	}
	if r.off == len(r.text) {
		switch r.d.End {
		case EOFData:
			r.Fault["eof-with-data"]++
			r.Ended = true
			return n, io.EOF
		case ErrData:
			r.Fault["error-with-data"]++
			r.Ended = true
			return n, r.d.EndErr()
		}
	}
	return n, nil
}

func (r *Reader) end() (int, error) {
	switch r.d.End {
	case Stuck:
		if !r.Ended {
			r.Fault["no-progress"]++
		}
		r.Ended = true
		return 0, nil
	case Err:
		r.Fault["read-error"]++
	case ErrData:
		r.Fault["error-with-data"]++
	case ErrUnexp:
		r.Fault["unexpected-eof"]++
		r.Ended = true
		return 0, io.ErrUnexpectedEOF
	}
	r.Ended = true
	if e := r.d.EndErr(); e != nil {
		return 0, e
	}
	return 0, io.EOF
}

// scribble uses the unread part of p as scratch space, as io.Reader allows.
func (r *Reader) scribble(p []byte) {
	if r.junk == nil || len(p) == 0 {
		return
	}
	r.Fault["scratch-scribble"]++
	pat := []string{"\u0301", "\u200d", "\U0001f1e6", "\n", "\xff", "a", "\xf0\x9f", "\u094d"}[r.junk.N(8)]
	for i := 0; i < len(p) && i < 64; i++ {
		p[i] = pat[i%len(pat)]
	}
}

// Outcome of one pass.
type Outcome struct {
	Ends  []int // token ends, cumulative over the consumed bytes
	Cat   []byte
	Err   error
	Bad   string // contract breach, panic or stall: empty if none
	Kind  string
	Calls int
	Rd    *Reader
}

// Shift gives the token ends moved by n.
func (o *Outcome) Shift(n int) []int {
	v := make([]int, len(o.Ends))
	for i, e := range o.Ends {
		v[i] = e + n
	}
	return v
}

func (o *Outcome) fail(kind, f string, a ...any) {
	if o.Bad == "" {
		o.Kind, o.Bad = kind, fmt.Sprintf(f, a...)
	}
}

type stop struct{}

// StepBudget bounds one consultation of the split function.
func StepBudget(n int) uint64 { return 2_000_000 + 4000*uint64(n) }

// Guard wraps a split function with the checks that hold for every call.
func (o *Outcome) Guard(split Split, strict, noBound bool) Split {
	return func(data []byte, eof bool) (adv int, tok []byte, err error) {
		o.Calls++
		if !noBound {
			hook.Budget(StepBudget(len(data)))
		}
		adv, tok, err = split(data, eof)
		if !noBound {
			hook.NoBudget()
		}
		o.Contract(data, eof, adv, tok, err, strict)
		if o.Bad != "" {
			panic(stop{})
		}
		return
	}
}

// Contract checks one call's results against its arguments.
func (o *Outcome) Contract(data []byte, eof bool, adv int, tok []byte, err error, strict bool) {
	switch {
	case err != nil:
		o.fail("error-returned", "split function returned error %v for %x (eof=%v)", err, clip(data), eof)
	case adv < 0 || adv > len(data):
		o.fail("advance-range", "advance %d for %d bytes %x (eof=%v)", adv, len(data), clip(data), eof)
	case strict && (tok == nil) != (adv == 0):
		o.fail("token-advance", "advance %d with token %x (nil=%v) for %x (eof=%v)", adv, clip(tok), tok == nil, clip(data), eof)
	case strict && tok != nil && (len(tok) != adv || unsafe.SliceData(tok) != unsafe.SliceData(data)):
		o.fail("token-not-prefix", "advance %d but token of %d bytes is not the leading bytes of the data %x (eof=%v)", adv, len(tok), clip(data), eof)
	case eof && len(data) > 0 && adv == 0:
		o.fail("stalled-at-eof", "no token at end of input with %d bytes left: %x", len(data), clip(data))
	}
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// Hooks observe a pass.
type Hooks struct {
	OnRead  func(o *Outcome, delivered int)
	OnToken func(o *Outcome) bool // false: the consumer crashes here
	Raw     func(data []byte, eof bool, adv int)
	NoBound bool // the caller bounds steps (concurrent passes share one counter)
	Strict  bool // check everything about each call's results, not only what breaks the consumer
}

// Run makes one complete pass of the consumer over the text.
func Run(text []byte, d *Delivery, split Split, h Hooks) (o *Outcome) {
	o = &Outcome{}
	defer func() {
		if !h.NoBound {
			hook.NoBudget()
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stop:
			case hook.Deadlock:
				o.fail("deadlock", "every caller waits for another")
			case hook.StepLimit:
				o.fail("no-termination", "a consultation did not finish within its step budget")
			case runtime.Error:
				o.fail("panic", "panic: %v", x)
			default:
				o.fail("panic", "panic: %v", x)
			}
		}
	}()
	rd := NewReader(text, d)
	o.Rd = rd
	if h.OnRead != nil {
		rd.OnRead = func(n int) { h.OnRead(o, n) }
	}
	g := o.Guard(split, h.Strict, h.NoBound)
	if h.Raw != nil {
		g0 := g
		g = func(data []byte, eof bool) (int, []byte, error) {
			a, t, e := g0(data, eof)
			h.Raw(data, eof, a)
			return a, t, e
		}
	}
	emit := func(t []byte) bool {
		o.Cat = append(o.Cat, t...)
		o.Ends = append(o.Ends, len(o.Cat))
		if len(t) == 0 {
			o.fail("empty-token", "token %d is empty", len(o.Ends)-1)
			return false
		}
		if len(o.Cat) > len(text) {
			o.fail("endless", "the tokens hold more bytes than were ever sent")
			return false
		}
		return h.OnToken == nil || h.OnToken(o)
	}
	switch d.Cons {
	case "scanner":
		sc := bufio.NewScanner(rd)
		sc.Split(g)
		if d.Cap > 0 {
			sc.Buffer(make([]byte, 0, d.Cap), d.Max)
		}
		for sc.Scan() {
			if !emit(sc.Bytes()) {
				return
			}
		}
		o.Err = sc.Err()
	case "push":
		push(o, rd, d, g, emit)
	default: // whole: all bytes at hand
		data := append([]byte(nil), rd.text...)
		for len(data) > 0 {
			n, t, _ := g(data, true)
			if !emit(t) {
				return
			}
			data = data[n:]
		}
		o.Err = d.EndErr()
	}
	return
}

// push is an event-driven consumer with an adversarial buffer policy.
func push(o *Outcome, rd *Reader, d *Delivery, split Split, emit func([]byte) bool) {
	r := rng.New(d.CSeed, 0x9054)
	buf := make([]byte, 0, r.In(1, 16))
	zeros := 0
	for {
		// Make room, sometimes moving although there is room.
		want := r.In(1, 64)
		if r.N(8) == 0 {
			want = r.In(64, 9000)
		}
		if cap(buf)-len(buf) < want || r.N(6) == 0 {
			nb := make([]byte, len(buf), len(buf)+want+r.N(40))
			copy(nb, buf)
			poison(r, buf[:cap(buf)])
			poison(r, nb[len(nb):cap(nb)])
			buf = nb
			rd.Fault["buffer-moved"]++
		}
		n, err := rd.Read(buf[len(buf) : len(buf)+want])
		buf = buf[:len(buf)+n]
		eof := err != nil
		if n == 0 && err == nil {
			zeros++
			if zeros >= 100 {
				err, eof = io.ErrNoProgress, true
			}
		} else {
			zeros = 0
		}
		if n > 0 || eof {
			for len(buf) > 0 {
				adv, t, _ := split(buf, eof)
				if r.N(16) == 0 { // a spurious repetition must change nothing
					adv2, t2, _ := split(buf, eof)
					if adv2 != adv || string(t2) != string(t) {
						o.fail("unstable", "repeating a consultation gave %d then %d for %x", adv, adv2, clip(buf))
						return
					}
				}
				if adv == 0 {
					break
				}
				if !emit(t) {
					return
				}
				buf = buf[adv:]
				if r.N(10) == 0 { // compact in place, leaving stale bytes behind
					full := buf[:len(buf)]
					nb := make([]byte, len(full), cap(full)+8)
					copy(nb, full)
					buf = nb
				}
			}
		}
		if eof {
			if err != io.EOF {
				o.Err = err
			}
			return
		}
	}
}

func poison(r *rng.R, b []byte) {
	k := byte(r.U64())
	pat := []string{"\u0301", "\u200d\U0001f468", "\U0001f1e6", "\n", "\xf0\x9f\x91", "\u0915\u094d"}[r.N(6)]
	for i := range b {
		if k&1 == 0 {
			b[i] = pat[i%len(pat)]
		} else {
			b[i] = k
		}
	}
}

// GenScript draws a delivery script for n bytes; tears prefers some offsets.
//
// longest is the length of the longest cluster: a consumer looks at it again
// after every read, so for huge ones reads must not all be tiny.
func GenScript(r *rng.R, n int, tears []int, longest int) []Ev {
	var s []Ev
	mode := r.N(9)
	zeroP := []int{0, 0, 5, 50}[r.N(4)]
	fixed := r.In(1, 9)
	block := []int{16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 1460}[r.N(10)]
	if longest > 1500 && mode != 4 {
		mode = 5
		if longest < 10000 && r.N(2) == 0 {
			mode = 3
		}
	}
	off, ti := 0, 0
	for off < n && len(s) < 6000 {
		var e Ev
		switch mode {
		case 0: // one byte at a time
			e.N = 1
		case 1:
			e.N = fixed
		case 2:
			e.N = r.In(1, 16)
		case 3:
			e.N = r.In(1, 400)
		case 4:
			return s // all at once
		case 5:
			e.N = r.In(500, 8192)
			if longest > 150000 { // the scanner consults after each read
				e.N = r.In(longest/16, longest/3)
			}
		case 6: // mostly tiny with a few big ones
			e.N = 1 + r.N(3)
			if r.N(20) == 0 {
				e.N = r.In(10, 5000)
			}
		case 8: // the sizes of blocks and packets
			e.N = block
		case 7: // tear exactly at or just around the wanted offsets
			for ti < len(tears) && tears[ti] <= off {
				ti++
			}
			if ti < len(tears) {
				e.N = tears[ti] - off + r.In(-1, 1)
				ti += r.N(3)
			} else {
				e.N = r.In(1, 50)
			}
		}
		if e.N < 1 {
			e.N = 1
		}
		if r.N(100) < zeroP {
			e.Zero = r.In(1, 3)
			if r.N(20) == 0 {
				e.Zero = r.In(4, 60)
			}
		}
		if r.N(4) == 0 {
			e.Delay = r.N(3000)
		}
		off += e.N
		s = append(s, e)
	}
	return s
}

// GenDelivery draws an environment for an n-byte text.
func GenDelivery(r *rng.R, n int, tears []int, longest int) Delivery {
	d := Delivery{FailAt: -1, Script: GenScript(r, n, tears, longest), Scribble: r.N(3) == 0}
	d.End = []string{EOF, EOF, EOFData}[r.N(3)]
	k := r.N(10)
	if longest > 150000 && r.N(2) == 0 {
		k = 0
	}
	switch k {
	case 0:
		d.Cons, d.Script, d.End = "whole", nil, EOF
	case 1, 2, 3:
		d.Cons, d.CSeed = "push", r.U64()
		if longest > 10000 {
			d.Cons = "scanner"
		}
	default:
		d.Cons = "scanner"
		switch r.N(4) {
		case 0: // the scanner's defaults
		case 1:
			d.Cap, d.Max = r.In(1, 40), 1<<22
		case 2:
			d.Cap, d.Max = r.In(1, 600), 1<<22
		case 3:
			d.Cap, d.Max = []int{64, 128, 255, 256, 257, 1024, 4095, 4096, 4097, 8192}[r.N(10)], 1<<22
		}
	}
	return d
}
