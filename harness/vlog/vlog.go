// Package vlog stands in for log in the router program: its fatal functions
// end the program by panicking with Fatal instead of ending the process.
package vlog

import "fmt"

type FatalExit struct{ Msg string }

func Fatal(a ...interface{})            { panic(FatalExit{fmt.Sprint(a...)}) }
func Fatalf(f string, a ...interface{}) { panic(FatalExit{fmt.Sprintf(f, a...)}) }
func Fatalln(a ...interface{})          { panic(FatalExit{fmt.Sprintln(a...)}) }
