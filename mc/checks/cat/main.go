// Command cat checks the catalogue properties.
package main

import "verif/mc/explore"

func main() { explore.Main() }
