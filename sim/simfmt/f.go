// Package simfmt is package fmt whose implicit streams are the simulated ones.
package simfmt

import (
	"fmt"

	os "github.com/hymkor/gmnlisp/zz_verif/simos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(os.Stdout, f, a...) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(os.Stdin, f, a...) }
