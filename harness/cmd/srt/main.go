// Package main checks the SRT packet codecs and the SRT listener.
package main

import "verif/harness/eng"

func main() { eng.Main() }
