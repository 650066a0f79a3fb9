// Package progs stands for pkg/command.  When W01 is decided, gosym replaces this file by the sources of
// /repo/pkg/command with gmnverif/exec in the place of os/exec.
package progs
