// vmon: monitors of the properties of ll1parser, see /verif/DESIGN.md
package main

import "llverif/mon"

func main() { mon.Main() }
