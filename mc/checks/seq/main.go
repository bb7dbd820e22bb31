// Command seq checks the sequential properties: bitset, messages, hashing.
package main

import "verif/mc/explore"

func main() { explore.Main() }
