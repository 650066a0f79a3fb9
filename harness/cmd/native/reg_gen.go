package main

// replaced at build time by a table of every harness (see engine/main.go, startNative)
