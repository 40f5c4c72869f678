// Package fmt is fmt with its implicit standard streams simulated.
package fmt

import (
	"fmt"
	"zsim/shim/os"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(os.Stdout, f, a...) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(os.Stdin, f, a...) }
