// Command rtsplib decides C19 (RTP), C20 (RTSP messages) and C21 (SDP).
package main

import "verif/harness/eng"

func main() { eng.Main() }
