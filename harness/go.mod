module gmnverif

go 1.20

require (
	github.com/hymkor/gmnlisp v0.0.0
	github.com/hymkor/go-multiline-ny v0.18.1
	github.com/mattn/go-colorable v0.1.13
	github.com/nyaosorg/go-readline-ny v1.6.2
	github.com/nyaosorg/go-readline-skk v0.4.2
)

require (
	github.com/atotto/clipboard v0.1.4 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mattn/go-runewidth v0.0.16 // indirect
	github.com/mattn/go-tty v0.0.7 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	golang.org/x/sys v0.27.0 // indirect
	golang.org/x/term v0.26.0 // indirect
	golang.org/x/text v0.20.0 // indirect
)

replace github.com/hymkor/gmnlisp => /repo
