// Package cli stands for the command gmnlisp.  When V01 is decided, gosym replaces this file by the sources of
// /repo/cmd/gmnlisp with main renamed to Main and os.Exit replaced by exit.
package cli

// Main is main.
func Main() { panic("cli: not replaced") }
