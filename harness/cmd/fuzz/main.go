package main

import "verif/harness/eng"

func main() { eng.Main() }
