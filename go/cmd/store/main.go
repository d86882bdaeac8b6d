// Command store explores the layered stores and the rabbit store.
package main

import "verif.local/v/hx"

func main() { hx.Main() }
