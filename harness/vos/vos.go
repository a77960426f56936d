// Package vos stands in for os in the router program.
package vos

type Exited struct{ Code int }

func Exit(code int) { panic(Exited{code}) }
