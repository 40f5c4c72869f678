// Package log is log with its standard logger on the simulated stderr.
package log

import (
	"fmt"
	"io"
	"log"
	"zsim/core"
	"zsim/shim/os"
)

type errw struct{}

func (errw) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

var std = log.New(errw{}, "", 0)

func init() { core.OnProcStart(func(*core.Proc) { std = log.New(errw{}, "", 0) }) }

func Default() *log.Logger         { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetFlags(f int)               {}
func SetPrefix(p string)           { std.SetPrefix(p) }
func Flags() int                   { return log.LstdFlags }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Output(d int, s string) error { return std.Output(d, s) }
func Print(a ...any)               { std.Print(a...) }
func Println(a ...any)             { std.Println(a...) }
func Printf(f string, a ...any)    { std.Printf(f, a...) }
func Fatal(a ...any)               { std.Print(a...); os.Exit(1) }
func Fatalln(a ...any)             { std.Println(a...); os.Exit(1) }
func Fatalf(f string, a ...any)    { std.Printf(f, a...); os.Exit(1) }
func Panic(a ...any)               { s := fmt.Sprint(a...); std.Print(s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); std.Print(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); std.Print(s); panic(s) }
