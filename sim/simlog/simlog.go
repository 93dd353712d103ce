// Package simlog stands in for package log in the table generator, so that
// log.Fatal ends the simulated process and not the simulator.
package simlog

import (
	"fmt"
	"io"

	"verifsim/simos"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func SetFlags(int)              {}
func SetPrefix(string)          {}
func Print(a ...any)            { fmt.Fprint(simos.Stderr, a...) }
func Println(a ...any)          { fmt.Fprintln(simos.Stderr, a...) }
func Printf(f string, a ...any) { fmt.Fprintf(simos.Stderr, f, a...) }
func Fatal(a ...any)            { Print(a...); simos.Exit(1) }
func Fatalln(a ...any)          { Println(a...); simos.Exit(1) }
func Fatalf(f string, a ...any) { Printf(f, a...); simos.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }

func Panicln(a ...any) { panic(fmt.Sprintln(a...)) }

// Logger of the simulated process.
type Logger struct {
	w      io.Writer
	prefix string
}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix} }
func Default() *Logger                                 { return &Logger{simos.Stderr, ""} }
func (l *Logger) Print(a ...any)                       { fmt.Fprint(l.w, append([]any{l.prefix}, a...)...) }
func (l *Logger) Println(a ...any)                     { fmt.Fprintln(l.w, append([]any{l.prefix}, a...)...) }
func (l *Logger) Printf(f string, a ...any)            { fmt.Fprintf(l.w, l.prefix+f, a...) }
func (l *Logger) Fatal(a ...any)                       { l.Print(a...); simos.Exit(1) }
func (l *Logger) Fatalln(a ...any)                     { l.Println(a...); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any)            { l.Printf(f, a...); simos.Exit(1) }
func (l *Logger) SetFlags(int)                         {}
func (l *Logger) SetPrefix(p string)                   { l.prefix = p }

func Flags() int          { return LstdFlags }
func Prefix() string      { return "" }
func SetOutput(io.Writer) {}
func Writer() io.Writer   { return simos.Stderr }
func Output(_ int, s string) error {
	Println(s)
	return nil
}
func (l *Logger) Flags() int            { return LstdFlags }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) SetOutput(w io.Writer) { l.w = w }
func (l *Logger) Writer() io.Writer     { return l.w }
func (l *Logger) Output(_ int, s string) error {
	l.Println(s)
	return nil
}
func (l *Logger) Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func (l *Logger) Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func (l *Logger) Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
