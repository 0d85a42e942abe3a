// Package main checks the RTMP side of the server over the wire.
package main

import "verif/harness/eng"

func main() { eng.Main() }
