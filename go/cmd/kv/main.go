// Command kv explores the key index and the key-value and metadata layers.
package main

import "verif.local/v/hx"

func main() { hx.Main() }
