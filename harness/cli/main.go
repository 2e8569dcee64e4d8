// Driver for the command and its conversions of results.
package main

import "sigs.k8s.io/instrumentation-tools/zzverif/hlib"

func main() {
	hlib.Mode("tables", tables)
	hlib.Mode("convert", convert)
	hlib.Mode("sweep", sweep)
	hlib.Mode("batch", batch)
	hlib.Mode("cmdline", cmdline)
	hlib.Main()
}
