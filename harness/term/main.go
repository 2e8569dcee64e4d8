// Driver for the terminal widgets: text area, text box, layouts, keys, event
// loop (C20-C24, C26).
package main

import "sigs.k8s.io/instrumentation-tools/zzverif/hlib"

func main() {
	area()
	box()
	layout()
	keyModes()
	loopMode()
	hlib.Main()
}
