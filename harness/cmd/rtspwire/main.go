// Package main checks the RTSP side of the server over the wire.
package main

import "verif/harness/eng"

func main() { eng.Main() }
