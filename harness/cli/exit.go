package cli

// Exit is what a call of os.Exit panics with.
type Exit int

// OnExit is called by os.Exit before anything that is deferred.
var OnExit func()

func verifExit(code int) {
	OnExit()
	panic(Exit(code))
}
